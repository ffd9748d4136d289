# The design spectrum of the seismic code.
import numpy as np
from fractions import Fraction as Fr
from hypothesis import strategies as st
from .. import gen
from ..runner import Check, Sub, Violation, close, require

spec = st.fixed_dictionaries({
    "amax": st.one_of(gen.pick(0.04, 0.08, 0.12, 0.16, 0.24, 0.32, 0.5, 0.9, 1.4), gen.num(0.01, 2)),
    "Tg": st.one_of(gen.pick(0.2, 0.25, 0.3, 0.35, 0.4, 0.45, 0.55, 0.65, 0.75, 0.9), gen.num(0.15, 1.3)),
    "xi": st.one_of(gen.pick(0.05, 0.02, 0.03, 0.035, 0.04, 0.1), gen.num(0.005, 0.6)),
    "dt": gen.pick(0.01, 0.02, 0.05, 0.1, 0.25, 0.013),
})


def code(s, t):
    """GB 50011, clause 5.1.5, with rational coefficients"""
    x, a, Tg = Fr(str(s["xi"])), Fr(str(s["amax"])), Fr(str(s["Tg"]))
    g = Fr(9, 10) + (Fr(1, 20) - x) / (Fr(3, 10) + 6 * x)
    e1 = max(Fr(1, 50) + (Fr(1, 20) - x) / (4 + 32 * x), Fr(0))
    e2 = max(1 + (Fr(1, 20) - x) / (Fr(8, 100) + Fr(16, 10) * x), Fr(55, 100))
    e1, e2, g, a, Tg = float(e1), float(e2), float(g), float(a), float(Tg)
    if t <= 0.1:
        return (0.45 + (e2 - 0.45) * t / 0.1) * a
    if t <= Tg:
        return e2 * a
    if t <= 5 * Tg:
        return (Tg / t) ** g * e2 * a
    return (e2 * 0.2 ** g - e1 * (t - 5 * Tg)) * a


def compare(s, T, al, what):
    want = np.array([code(s, t) for t in T])
    close(al, want, 1e-9, what, scale=s["amax"])
    al = np.asarray(al, float)
    # no jumps: the branches meet at 0.1 s, Tg and 5 Tg
    d = np.diff(al)
    k = T[:-1] >= s["Tg"]
    require(np.all(d[k] <= 1e-9 * s["amax"]), "%s rises beyond Tg" % what)


def o_grid(s):
    from hyperstatic.app.design.GB.seismic.spectrum import GB50010
    sp = GB50010(s["amax"], s["Tg"], s["xi"]).spectrum
    T, al = np.asarray(sp["T"], float), np.asarray(sp["alpha"], float)
    close(T, np.arange(601) / 100.0, 1e-12, "periods", scale=6.0)
    compare(s, T, al, "spectrum")
    # linear in the peak value
    two = np.asarray(GB50010(2 * s["amax"], s["Tg"], s["xi"]).spectrum["alpha"], float)
    close(two, 2 * al, 1e-12, "twice the peak value")
    # more damping never gives a higher plateau
    hi = np.asarray(GB50010(s["amax"], s["Tg"], s["xi"] + 0.03).spectrum["alpha"], float)
    require(np.max(hi) <= np.max(al) * (1 + 1e-12), "more damping, higher plateau")


def o_dict(s):
    from hyperstatic.app.seismic.wave2spec import GB50011_spectrum
    d = GB50011_spectrum(s["amax"], s["Tg"], s["xi"], s["dt"])
    T = np.array(list(d.keys()), float)
    n = int(np.ceil(6 / s["dt"] - 1e-9))
    require(len(T) in (n, n + 1), "%d periods for a step of %g" % (len(T), s["dt"]))
    close(T, np.arange(len(T)) * s["dt"], 1e-9, "periods", scale=6.0)
    compare(s, T, list(d.values()), "spectrum")


def o_agree(s):
    """the two implementations give the same curve"""
    from hyperstatic.app.seismic.wave2spec import GB50011_spectrum
    from hyperstatic.app.design.GB.seismic.spectrum import GB50010
    a = GB50010(s["amax"], s["Tg"], s["xi"]).spectrum
    d = GB50011_spectrum(s["amax"], s["Tg"], s["xi"], 0.01)
    close(list(d.values())[:600], np.asarray(a["alpha"][:600], float), 1e-9, "two spectra", scale=s["amax"])


def make():
    cl = lambda s: ["damping<5%" if s["xi"] < 0.05 else "damping>30%" if s["xi"] > 0.3 else "damping 5-30%", "long" if 5 * s["Tg"] < 6 else "no last branch"]
    nt = lambda s: s["xi"] != 0.05
    return Check("P29", [
        Sub("class", spec, o_grid, nt, "damping other than 5%", quick=250, classify=cl),
        Sub("function", spec, o_dict, nt, "damping other than 5%", quick=250, classify=cl),
        Sub("agreement", spec, o_agree, nt, "damping other than 5%", quick=60),
    ], assumptions=["characteristic period of at least 0.15 s"])
