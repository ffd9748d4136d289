# Load cases combine patterns linearly.
import numpy as np
from hypothesis import strategies as st
from .. import gen, ref, facade
from ..runner import Check, Sub, Violation, close, require

NODES, BEAMS = ["n%d" % i for i in range(6)], ["b0", "b1", "b2"]


@st.composite
def pat(draw):
    load = st.integers(-1000, 1000) if draw(st.integers(0, 2)) == 0 else gen.load(1000)      # some users only write whole numbers
    p = {"nodal": {}, "dist": {}, "conc": {}, "disp": {}}
    many = draw(st.integers(0, 2)) == 0
    for n in NODES:
        if draw(st.booleans()):
            p["nodal"][n] = [0] * 6 if draw(st.integers(0, 5)) == 0 else [draw(load) for _ in range(6)]
        if draw(st.integers(0, 3)) == 0 or many:
            p["disp"][n] = [0] * 6 if draw(st.integers(0, 5)) == 0 else [draw(st.one_of(gen.num(-1, 1, 3), gen.fine(-1, 1))) for _ in range(6)]
    for b in BEAMS:
        if draw(st.booleans()):
            p["dist"][b] = [draw(load) for _ in range(8)]
        if draw(st.booleans()):
            p["conc"][b] = [[draw(load) for _ in range(6)], draw(st.one_of(gen.num(0, 1, 2), gen.fine(0, 1)))]
    return p


@st.composite
def case(draw, curves=False):
    s = {"pats": [draw(pat()) for _ in range(draw(st.integers(1, 3)))], "ops": [], "kind": "static", "L": draw(gen.num(0.5, 9, 1))}
    n = len(s["pats"])
    if curves:
        s["kind"] = "th"
    added = set()
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.integers(0, n - 1))
        if k in added and draw(st.booleans()):
            s["ops"].append(["factor", k, draw(st.one_of(gen.num(-3, 3, 2), st.integers(-3, 3), gen.fine(-3, 3)))])
        else:
            op = ["add", k, draw(st.one_of(gen.num(-3, 3, 2), st.integers(-3, 3), gen.fine(-3, 3)))]
            if curves:
                m = draw(st.one_of(st.integers(2, 6), st.integers(2, 6), st.integers(20, 90)))
                y = [draw(st.one_of(gen.num(-2, 2, 2), gen.fine(-2, 2))) for _ in range(min(m, 6))]
                op.append([y[(i * i + i // 6) % len(y)] for i in range(m)])
            s["ops"].append(op)
            added.add(k)
    if draw(st.integers(0, 5)) == 0:             # many patterns, the same ones under other names
        for k in range(n, n + draw(st.integers(4, 15))):
            s["pats"].append(s["pats"][k % n])
            y = [[draw(gen.num(-2, 2, 2))] * (2 + k % 5)] if curves else []
            s["ops"].append(["add", k, draw(gen.num(-3, 3, 2))] + y)
    return s


def build(s):
    from hyperstatic.core.fe_model.load.pattern import LoadPattern
    from hyperstatic.core.fe_model.load.loadcase import StaticCase, TimeHistoryCase
    P = []
    for i, p in enumerate(s["pats"]):
        q = LoadPattern("p%d" % i)
        for n, v in p["nodal"].items():
            q.set_nodal_load(n, *v)
        for n, v in p["disp"].items():
            q.set_nodal_disp(n, *v)
        for b, v in p["dist"].items():
            q.set_beam_load_dist(b, *v)
        for b, v in p["conc"].items():
            q.set_beam_load_conc(b, *v[0], v[1])
        P.append(q)
    lc = StaticCase("c") if s["kind"] == "static" else TimeHistoryCase("c")
    fac, crv = {}, {}
    for op in s["ops"]:
        if op[0] == "add":
            if s["kind"] == "static":
                lc.add_pattern(P[op[1]], op[2])
                crv[op[1]] = None
            else:
                y = op[3]
                curve = np.vstack([np.arange(len(y)) * 0.1, y])
                lc.add_pattern(P[op[1]], op[2], curve)
                curve[...] = 1e9                 # the caller's array, used again
                crv[op[1]] = y
            fac[op[1]] = op[2]
        else:
            lc.set_pattern_factor("p%d" % op[1], op[2])
            fac[op[1]] = op[2]
    return P, lc, fac, crv


def bf(p, b, L):
    f = np.zeros(12)
    if b in p["dist"]:
        f += ref.dist_f(p["dist"][b], L)
    if b in p["conc"]:
        f += ref.conc_f(*p["conc"][b], L)
    return f


SC = 1000 * 3 * 3 * 2 * 9 * 9


def o_static(s):
    P, lc, fac, crv = build(s)
    for n in NODES:
        e = sum((np.array(s["pats"][k]["nodal"].get(n, [0] * 6)) * f for k, f in fac.items()), np.zeros(6))
        g = lc.get_nodal_f(n)
        close(np.zeros(6) if g is None else g, e, 1e-9, "nodal load of %s" % n, scale=1e4)
        ed = sum((np.array(s["pats"][k]["disp"].get(n, [0] * 6)) * f for k, f in fac.items()), np.zeros(6))
        close(lc.get_nodal_d_dict().get(n, np.zeros(6)), ed, 1e-9, "nodal displacement of %s" % n, scale=10)
        close(lc.get_nodal_f_dict().get(n, np.zeros(6)), e, 1e-9, "nodal load dictionary, %s" % n, scale=1e4)
    for b in BEAMS:
        e = sum((bf(s["pats"][k], b, s["L"]) * f for k, f in fac.items()), np.zeros(12))
        g = lc.get_beam_f(b, s["L"])
        close(np.zeros(12) if g is None else g, e, 1e-9, "member load of %s" % b, scale=SC)
    g = lc.get_nodal_f("absent")
    require(g is None or not np.any(g), "load at a node without load")
    for q in [lc] + P:
        gen.smash([q.get_nodal_f_dict(), q.get_nodal_d_dict()] + [q.get_nodal_f(n) for n in NODES] + [q.get_beam_f(b, s["L"]) for b in BEAMS])
    for q in P:
        gen.smash([q.get_nodal_d(n) for n in NODES] + [x for b in BEAMS for x in (q.get_beam_distributed(b), q.get_beam_concentrated(b))])
    # neither combining nor reading has altered the patterns
    for k, p in enumerate(s["pats"]):
        for n in NODES:
            v = P[k].get_nodal_d(n)
            close(np.zeros(6) if v is None else v, p["disp"].get(n, [0] * 6), 1e-12, "imposed displacement of pattern %d changed" % k, scale=10)
            v = P[k].get_nodal_f(n)
            if n in p["nodal"]:
                close(v, p["nodal"][n], 1e-12, "pattern %d changed by combining" % k, scale=1e3)
            else:
                require(v is None or not np.any(v), "pattern %d gained a load" % k)
        for b in BEAMS:
            v = P[k].get_beam_f(b, s["L"])
            close(np.zeros(12) if v is None else v, bf(p, b, s["L"]), 1e-9, "pattern %d member load" % k, scale=SC)
    require(lc.name == "c", "name")


def o_history(s):
    P, lc, fac, crv = build(s)
    mi = min(len(c) for c in crv.values())
    ma = max(len(c) for c in crv.values())
    require(tuple(lc.get_max_min_step()) == (ma, mi), "steps %s instead of %s" % (lc.get_max_min_step(), (ma, mi)))
    for n in NODES:
        H = np.zeros((ma, 6))
        for k, f in fac.items():
            v = np.array(s["pats"][k]["nodal"].get(n, [0] * 6)) * f
            H[:len(crv[k])] += np.outer(crv[k], v)
        close(lc.get_nodal_f_time_history(n), H, 1e-9, "time history of the load at %s" % n, scale=2e4)
        for t in range(0, ma, 1 + ma // 25):
            g = lc.get_nodal_f(n, t)
            close(np.zeros(6) if g is None else g, H[t], 1e-9, "nodal load of %s at step %d" % (n, t), scale=2e4)
    for b in BEAMS:
        for t in range(0, ma, 1 + ma // 25):
            e = sum((bf(s["pats"][k], b, s["L"]) * f * crv[k][t] for k, f in fac.items() if t < len(crv[k])), np.zeros(12))
            g = lc.get_beam_f(b, s["L"], t)
            close(np.zeros(12) if g is None else g, e, 1e-9, "member load of %s at step %d" % (b, t), scale=2 * SC)


def make():
    nt = lambda s: len({o[1] for o in s["ops"]}) > 1 or any(o[0] == "factor" for o in s["ops"])
    return Check("P08", [
        Sub("static", case(), o_static, nt, "several patterns, or a factor changed afterwards", quick=300,
            classify=lambda s: ["pats%d" % len({o[1] for o in s["ops"]})] + sorted({o[0] for o in s["ops"]})),
        Sub("time-curves", case(True), o_history, nt, "several patterns, or a factor changed afterwards", quick=300),
        facade.sub(facade.combined, 160, lambda s: any(len(c["p"]) > 1 for c in s["cases"]), ", a case of several patterns"),
    ])
