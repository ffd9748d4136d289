# Response of an oscillator to a ground motion record.
import math
import os
import numpy as np
from hypothesis import strategies as st
from .. import gen
from ..runner import Check, Sub, Violation, close, require


@st.composite
def record(draw, n_max=120):
    n = draw(st.integers(2, n_max))
    kind = draw(gen.pick("values", "impulse", "harmonic", "sparse"))
    if kind == "values":
        v = draw(st.lists(st.integers(-1000, 1000).map(lambda k: k / 10), min_size=n, max_size=n))
    elif kind == "impulse":
        v = [0.0] * n
        v[draw(st.integers(0, n - 1))] = draw(gen.pick(1.0, -3.0, 50.0))
    elif kind == "harmonic":
        a, w, p = draw(gen.num(1, 50, 1)), draw(gen.num(0.05, 2)), draw(gen.num(0, 6))
        v = [round(a * math.sin(w * k + p), 4) for k in range(n)]
    else:
        v = [0.0] * n
        for _ in range(draw(st.integers(1, 5))):
            v[draw(st.integers(0, n - 1))] = draw(st.integers(-100, 100)) / 1.0
    if not any(v):
        v[-1] = draw(gen.pick(1.0, -1.0))
    m = draw(gen.pick(1, 1, 1, 1e-6, 1e6))       # recorded in whatever unit
    return [x * m for x in v]


base = st.fixed_dictionaries({
    "p": record(), "q": record(), "w": st.one_of(gen.pick(1.0, 2 * math.pi), gen.num(0.3, 60, 2)), "z": st.one_of(gen.pick(0.0, 0.05, 0.02), gen.num(0, 0.6)),
    "dt": gen.pick(0.01, 0.02, 0.005, 0.1), "k": st.integers(0, 30), "c": gen.num(-3, 3)})


@st.composite
def longrec(draw):
    """thousands of instants from a few drawn numbers"""
    n = draw(st.integers(1500, 9000))
    y = draw(st.lists(st.integers(-1000, 1000).map(lambda k: k / 10), min_size=3, max_size=30))
    rnd = draw(st.randoms(use_true_random=False))
    return {"n": n, "y": y, "step": [rnd.randrange(len(y)) for _ in range(40)], "w": draw(st.one_of(gen.num(0.3, 60, 2))), "z": draw(gen.pick(0.0, 0.05, 0.2)), "dt": draw(gen.pick(0.01, 0.02, 0.005))}


def marched(p, w, z, dt):
    """the same sums, advanced from one instant to the next"""
    wd = w * math.sqrt(1 - z * z)
    q = np.exp(complex(-z * w, wd) * dt)
    acc, u = 0j, np.zeros(len(p))
    for i in range(len(p)):
        acc = acc * q + p[i]
        u[i] = acc.imag * dt / wd
    return u


def o_long_spectrum(s):
    from hyperstatic.app.seismic import wave2spec as m
    n, z, dt = int(s["n"] * 0.75), s["z"], max(s["dt"], 0.02)
    p = [s["y"][(s["step"][i % 40] + i // 40) % len(s["y"])] for i in range(n)]
    p[n - 1 - s["step"][0] * n // 100] = 2000.0      # late in the record
    with gen.Work() as wd:
        fn = os.path.join(wd, "wave.txt")
        with open(fn, "w") as f:
            f.write("".join("%r\n" % x for x in p))
        close(list(m.read_wave(fn)), p, 0, "a record of %d instants read from its file" % n)
        close(m.amptitude(p, 35.0), np.array(p) * 35.0 / 2000.0, 1e-12, "a record of %d instants scaled to its peak" % n, scale=35.0)
        T, sa, sv, sd = m.wave2spectrum(fn, dt, z, 35.0)
        ag = np.array(p) * 0.35 / 2000.0
        for k in (3, len(T) // 7, len(T) // 2, len(T) - 1):
            w = 2 * math.pi / T[k]
            u = np.max(np.abs(marched(ag, w, z, dt)))
            r = math.sqrt(1 - z * z)
            close(sd[k], u, 1e-7, "largest displacement at T=%g, record of %d instants" % (T[k], n), scale=np.sum(np.abs(ag)) * dt / w * 1e-2)
            if u <= 1e-4 * np.max(np.abs(ag)) * dt / w:      # nothing but rounding
                continue
            require(r * (1 - 1e-6) <= sv[k] / (w * u) <= 1 + 1e-6, "largest pseudo velocity at T=%g, record of %d instants" % (T[k], n))
            require(r * r * (1 - 1e-6) <= sa[k] * 9.8 / (w * w * u) <= 1 + 1e-6, "largest pseudo acceleration (in g) at T=%g, record of %d instants" % (T[k], n))


def o_long(s):
    from hyperstatic.app.seismic.wave2spec import duhamel
    n, w, z, dt = s["n"], s["w"], s["z"], s["dt"]
    p = np.array([s["y"][(s["step"][i % 40] + i // 40) % len(s["y"])] for i in range(n)])
    r = [np.asarray(x, float) for x in duhamel(w, z, np.arange(n) * dt, p)]
    require(all(x.shape == (n,) for x in r), "%s instants of the response to a record of %d" % ([x.shape for x in r], n))
    wd = w * math.sqrt(1 - z * z)
    close(r[2], marched(p, w, z, dt), 1e-7, "displacement in a long record", scale=np.sum(np.abs(p)) * dt / wd * 1e-2 + 1e-300)


def h(w, z, t):
    wd = w * math.sqrt(1 - z * z)
    return math.exp(-z * w * t) * math.sin(wd * t) / wd


def sums(s, p):
    """the Duhamel integral as a plain sum over earlier instants"""
    n = len(p)
    g = [h(s["w"], s["z"], i * s["dt"]) for i in range(n)]
    return np.array([sum(p[j] * g[i - j] for j in range(i + 1)) for i in range(n)]) * s["dt"]


def o_duhamel(s):
    from hyperstatic.app.seismic.wave2spec import duhamel
    w, z, dt = s["w"], s["z"], s["dt"]

    def run(p, t0=0.0):
        t = np.arange(len(p)) * dt
        r = duhamel(w, z, t, np.array(p, float))
        require(len(r) == 3 and all(np.shape(x) == (len(p),) for x in r), "shape of the response")
        return [np.asarray(x, float) for x in r]

    p = s["p"]
    n = len(p)
    Sa, Sv, Sd = run(p)
    size = sum(abs(x) for x in p) * dt / (w * math.sqrt(1 - z * z))
    close(Sd, sums(s, p), 1e-9, "displacement", scale=size)
    # pseudo velocity and acceleration: one factor for the whole record, between
    # the damped and the undamped frequency (both conventions are in use)
    wd = w * math.sqrt(1 - z * z)
    k = int(np.argmax(np.abs(Sd)))
    if abs(Sd[k]) > 1e-9 * size:
        for S, lo, hi, what in ((Sv, wd, w, "velocity"), (Sa, wd * wd, w * w, "acceleration")):
            f = S[k] / Sd[k]
            require(lo * (1 - 1e-9) <= f <= hi * (1 + 1e-9), "pseudo %s is %g times the displacement; frequency %g" % (what, f, w))
            close(S, f * Sd, 1e-9, "pseudo " + what, scale=hi * size)
    # superposition and delay
    q = (s["q"] + [0.0] * n)[:n]
    c = s["c"]
    Sb = run(q)[2]
    Sc = run([x + c * y for x, y in zip(p, q)])[2]
    close(Sc, Sd + c * Sb, 1e-9, "superposition", scale=size + abs(c) * sum(map(abs, q)) * dt / wd)
    m = s["k"] % n
    late = run([0.0] * m + p[:n - m])[2]
    close(late[m:], Sd[:n - m], 1e-9, "a delayed record", scale=size)
    require(np.max(np.abs(late[:m]), initial=0) <= 1e-9 * size, "a response before the excitation")


spectrum = st.fixed_dictionaries({"p": record(60), "z": gen.pick(0.02, 0.05, 0.1, 0.3), "dt": gen.pick(0.02, 0.05, 0.1, 0.0371234567), "a": st.one_of(gen.num(1, 400, 1), gen.fine(1, 400, 1)), "c": gen.pick(-1.0, 2.0, 0.5, -0.1),
                                "form": st.integers(0, 4), "mix": st.booleans()})


def text(x, k):
    """a number as different programs write it"""
    k = k % 5
    if k == 1 and x == int(x) and abs(x) < 1e15:
        return "%d" % x
    if k == 2:
        return "%.17e" % x
    if k == 3 and 0 < abs(x) < 1 and "e" not in repr(x):
        return repr(x).replace("0.", ".", 1)
    if k == 4:
        return "  %+.17G " % x
    return repr(x)


def o_spectrum(s):
    from hyperstatic.app.seismic import wave2spec as m
    with gen.Work() as wd:
        fn = os.path.join(wd, "wave.txt")
        with open(fn, "w") as f:
            f.write("".join(text(x, s["form"] + (i if s["mix"] else 0)) + "\n" for i, x in enumerate(s["p"])))
        got = m.read_wave(fn)
        close(list(got), s["p"], 0, "record read from its file")
        peak = max(abs(x) for x in s["p"])
        sc = m.amptitude(s["p"], s["a"])
        close(sc, [x * s["a"] / peak for x in s["p"]], 1e-12, "record scaled to its peak", scale=s["a"])
        T, sa, sv, sd = m.wave2spectrum(fn, s["dt"], s["z"], s["a"])
        T = np.asarray(T, float)
        n = int(round(6 / s["dt"]))
        require(len(T) in (n, n + 1) and len(sa) == len(T) and len(sv) == len(T) and len(sd) == len(T), "%d periods" % len(T))
        close(T, (1 + np.arange(len(T))) * s["dt"], 1e-9, "periods", scale=6.0)
        ag = [0.01 * x * s["a"] / peak for x in s["p"]]            # cm/s2 -> m/s2
        size = sum(map(abs, ag)) * s["dt"]
        for k in list(range(0, len(T), max(1, len(T) // 9))) + [len(T) - 1]:
            w = 2 * math.pi / T[k]
            u = np.max(np.abs(sums({"w": w, "z": s["z"], "dt": s["dt"]}, ag)))
            close(sd[k], u, 1e-9, "largest displacement at T=%g" % T[k], scale=size / w)
            r = math.sqrt(1 - s["z"] ** 2)
            if u > 1e-9 * size / w:
                require(r * (1 - 1e-9) <= sv[k] / (w * u) <= 1 + 1e-9, "largest pseudo velocity at T=%g" % T[k])
                require(r * r * (1 - 1e-9) <= sa[k] * 9.8 / (w * w * u) <= 1 + 1e-9, "largest pseudo acceleration (in g) at T=%g" % T[k])
        # the record is scaled to the design peak: its own size and sign are immaterial
        with open(fn, "w") as f:
            f.write("".join("%r\n" % (x * s["c"]) for x in s["p"]))
        T2, sa2, sv2, sd2 = m.wave2spectrum(fn, s["dt"], s["z"], s["a"])
        close(sd2, np.asarray(sd), 1e-9, "displacement spectrum of the scaled record")
        close(sa2, np.asarray(sa), 1e-9, "acceleration spectrum of the scaled record")
        T3, sa3, sv3, sd3 = m.wave2spectrum(fn, s["dt"], s["z"], 2 * s["a"])
        close(sa3, 2 * np.asarray(sa), 1e-9, "twice the design peak")


def make():
    return Check("P30", [
        Sub("oscillator", base, o_duhamel, lambda s: len([x for x in s["p"] if x]) > 1, "more than one non-zero instant", quick=300,
            classify=lambda s: ["undamped" if s["z"] == 0 else "damped"]),
        Sub("long", longrec(), o_long, lambda s: any(s["y"]), "excited", quick=12, classify=lambda s: ["instants%d+" % (s["n"] // 2000 * 2000)]),
        Sub("long-spectrum", longrec(), o_long_spectrum, lambda s: any(s["y"]), "excited", quick=4),
        Sub("spectrum", spectrum, o_spectrum, lambda s: len([x for x in s["p"] if x]) > 1, "more than one non-zero instant", quick=60,
            classify=lambda s: ["peak down" if -min(s["p"]) > max(s["p"]) else "peak up"]),
    ], assumptions=["records start at time 0 and have at least two equally spaced instants", "damping ratio below 0.6",
                    "the convention for pseudo velocity and acceleration (damped or undamped frequency) is left open"])
