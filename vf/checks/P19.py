# Subdividing members does not change the answer.
import numpy as np
from hypothesis import strategies as st, assume
from .. import gen, ref, facade
from ..runner import Check, Sub, Violation, close, require
from .P10 import ready


@st.composite
def spec(draw):
    f = draw(gen.frame(2, 4))
    f["loads"] = draw(gen.loads_for(f, n_max=4))
    f["k"] = draw(st.integers(0, len(f["beams"]) - 1))
    if not any(x[0] == f["k"] for x in f["loads"]["dist"] + f["loads"]["conc"]) and draw(st.integers(0, 4)):
        if draw(st.booleans()):
            f["loads"]["dist"].append([f["k"], [draw(gen.load(1000)) for _ in range(8)]])
        else:
            f["loads"]["conc"].append([f["k"], [draw(gen.load(1000)) for _ in range(6)], draw(gen.num(0, 1, 2))])
    cuts = draw(st.lists(st.integers(1, 19), min_size=1, max_size=3, unique=True))
    f["cuts"] = sorted(c / 20.0 for c in cuts)
    return f


def subdivide(s):
    k = s["k"]
    b = s["beams"][k]
    X = np.array(s["X"])
    n = len(X)
    c = [0.0] + s["cuts"] + [1.0]
    t = dict(s, X=list(s["X"]), beams=[dict(x) for x in s["beams"]], loads={"nodal": list(s["loads"]["nodal"]), "dist": [], "conc": []})
    for x in s["cuts"]:
        t["X"].append((X[b["i"]] + x * (X[b["j"]] - X[b["i"]])).tolist())
    nodes = [b["i"]] + [n + q for q in range(len(s["cuts"]))] + [b["j"]]
    ids = []
    for q in range(len(nodes) - 1):
        p = dict(b, i=nodes[q], j=nodes[q + 1])
        if q == 0:
            t["beams"][k] = p
            ids.append(k)
        else:
            t["beams"].append(p)
            ids.append(len(t["beams"]) - 1)
    for m, q in s["loads"]["dist"]:
        if m != k:
            t["loads"]["dist"].append([m, q])
            continue
        for e, (x0, x1) in zip(ids, zip(c, c[1:])):
            at = lambda a, z, x: a * (1 - x) + z * x
            t["loads"]["dist"].append([e, [at(q[2 * d], q[2 * d + 1], x) for d in range(4) for x in (x0, x1)]])
    for m, v, r in s["loads"]["conc"]:
        if m != k:
            t["loads"]["conc"].append([m, v, r])
            continue
        for e, (x0, x1) in zip(ids, zip(c, c[1:])):
            if x0 <= r <= x1:
                t["loads"]["conc"].append([e, v, (r - x0) / (x1 - x0)])
                break
    return t, ids


def o_split(s):
    fr, u = ready(s)
    t, ids = subdivide(s)
    with gen.Work() as w1, gen.Work() as w2:
        gen.solve(gen.build_model(s), [gen.static_case("c", [(gen.build_pattern("p", s["loads"]), 1.0)])], w1)
        gen.solve(gen.build_model(t), [gen.static_case("c", [(gen.build_pattern("p", t["loads"]), 1.0)])], w2)
        n = 6 * fr.n
        gen.same_disp(gen.load_d(w2, "c")[0][:n], gen.load_d(w1, "c")[0], fr, "displacements of the original joints", tol=1e-5)
        sc = gen.force_scale(fr, s["loads"]) * 30 + 1e-9
        b1, b2 = gen.beam_resolver(w1), gen.beam_resolver(w2)
        e = np.asarray(b1.resolve_beam_end_force(gen.bname(s["k"]), "c"))
        e0 = np.asarray(b2.resolve_beam_end_force(gen.bname(ids[0]), "c"))
        e1 = np.asarray(b2.resolve_beam_end_force(gen.bname(ids[-1]), "c"))
        close(np.concatenate([e0[:6], e1[6:]]), e, 1e-5, "end forces of the subdivided member", scale=sc)
        for k in range(len(s["beams"])):
            if k != s["k"]:
                close(b2.resolve_beam_end_force(gen.bname(k), "c"), b1.resolve_beam_end_force(gen.bname(k), "c"), 1e-5,
                      "end forces of the other members", scale=sc)


def make():
    return Check("P19", [
        Sub("subdivision", spec(), o_split, lambda s: any(x[0] == s["k"] and any(x[1]) for x in s["loads"]["dist"] + s["loads"]["conc"]),
            "the divided member carries load", quick=220, classify=lambda s: ["cuts%d" % len(s["cuts"])]),
        facade.sub(facade.subdivided, 100, source=facade.divisible()),
    ])
