# Load curves.
import math
import numpy as np
from hypothesis import strategies as st
from .. import gen
from ..runner import Check, Sub, Violation, close, require

harm = st.fixed_dictionaries({
    "kind": st.sampled_from(["sin", "cos"]), "A": gen.num(-1000, 1000), "w": st.one_of(gen.num(0, 100), gen.num(-20, 20)), "phi": gen.num(-7, 7),
    "dt": st.one_of(st.sampled_from([0.1, 0.01, 0.02, 0.005, 0.3, 0.7, 1.0]), gen.num(0.001, 2, 4), st.integers(1, 99).map(lambda k: 1.0 / k)),
    "n": st.one_of(st.integers(1, 40), st.integers(1, 2500)),
})


def o_harmonic(s):
    from hyperstatic.common.curve import Curve
    f, g = (math.sin, math.cos) if s["kind"] == "sin" else (math.cos, math.sin)
    c = getattr(Curve, s["kind"])("c", s["A"], s["w"], s["phi"], s["dt"], s["n"])
    n = s["n"]
    a = np.asarray(c.to_array())
    require(c.name == "c", "name")
    require(np.shape(c.x) == (n,) and np.shape(c.y) == (n,) and a.shape == (2, n), "%d points asked, got %s" % (n, a.shape))
    t = [k * s["dt"] for k in range(n)]
    close(a[0], t, 1e-12, "abscissae", scale=max(t[-1], s["dt"]))
    tol = 1e-11 * (1 + abs(s["w"]) * t[-1])
    close(a[1], [s["A"] * f(s["w"] * x + s["phi"]) for x in t], tol, "ordinates", scale=abs(s["A"]) + 1e-30)
    require(np.array_equal(a[0], c.x) and np.array_equal(a[1], c.y), "the array is not x over y")
    # a harmonic curve obeys y(t+dt)+y(t-dt) = 2 cos(w dt) y(t)
    if n > 2:
        close(a[1][2:] + a[1][:-2], 2 * math.cos(s["w"] * s["dt"]) * a[1][1:-1], 4 * tol, "not harmonic", scale=abs(s["A"]) + 1e-30)


given = st.fixed_dictionaries({"x": st.lists(gen.num(-100, 100), max_size=30), "y": st.lists(st.one_of(gen.num(-1000, 1000), st.integers(-5, 5)), min_size=30, max_size=30)})


def o_given(s):
    from hyperstatic.common.curve import Curve
    x, y = list(s["x"]), s["y"][:len(s["x"])]
    if len(x) % 2:
        x, y = np.array(x, float), np.array(y, float)
    c = Curve("名", x, y)
    n = len(x)
    gen.smash([x, y])                            # the curve keeps its own copy
    gen.smash([c.x, c.y, c.to_array()])
    require(c.name == "名", "name")
    a = np.asarray(c.to_array())
    require(a.shape == (2, n), "shape %s for %d points" % (a.shape, n))
    close(a[0], s["x"], 0, "abscissae")
    close(a[1], np.array(s["y"][:n], float), 0, "ordinates")


case = st.fixed_dictionaries({
    "curves": st.lists(harm.filter(lambda h: h["n"] <= 60 and abs(h["w"]) <= 20), min_size=1, max_size=3), "factors": st.lists(gen.num(-3, 3, 1), min_size=3, max_size=3),
    "loads": st.lists(st.lists(gen.load(100), min_size=6, max_size=6), min_size=3, max_size=3)})


def o_case(s):
    """What a time history case does with its curves, step by step."""
    from hyperstatic.common.curve import Curve
    from hyperstatic.core.fe_model.load.pattern import LoadPattern
    from hyperstatic.core.fe_model.load.loadcase import TimeHistoryCase
    lc = TimeHistoryCase("th")
    n = max(h["n"] for h in s["curves"])
    want = np.zeros((n, 6))
    for k, h in enumerate(s["curves"]):
        p = LoadPattern("p%d" % k)
        p.set_nodal_load("n", *s["loads"][k])
        c = getattr(Curve, h["kind"])("c", h["A"], h["w"], h["phi"], h["dt"], h["n"])
        a = c.to_array()
        lc.add_pattern_time_history(p, s["factors"][k], a)
        gen.smash([a, c.x, c.y])
        f = math.sin if h["kind"] == "sin" else math.cos
        for i in range(h["n"]):
            want[i] += np.array(s["loads"][k]) * s["factors"][k] * h["A"] * f(h["w"] * i * h["dt"] + h["phi"])
    sc = np.max(np.abs(want)) + 1e-6 * max(1.0, max(abs(h["A"]) for h in s["curves"]))
    close(lc.get_nodal_f_time_history("n"), want, 1e-9, "nodal load over time", scale=sc)
    require(tuple(lc.get_max_min_step()) == (n, min(h["n"] for h in s["curves"])), "number of steps %r" % (lc.get_max_min_step(),))
    for i in range(n):
        close(lc.get_nodal_f("n", i), want[i], 1e-9, "nodal load at step %d" % i, scale=sc)


def make():
    return Check("P28", [
        Sub("harmonic", harm, o_harmonic, lambda s: s["n"] > 2 and s["A"] and s["w"], "more than two points of a moving curve", quick=800,
            classify=lambda s: [s["kind"], "long" if s["n"] > 100 else "short"]),
        Sub("given", given, o_given, lambda s: len(s["x"]) > 1, "at least two points", quick=200),
        Sub("case", case, o_case, lambda s: len(s["curves"]) > 1, "several curves", quick=250, classify=lambda s: ["curves%d" % len(s["curves"])]),
    ])
